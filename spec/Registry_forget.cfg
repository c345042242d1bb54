CONSTANTS
 Threads = {1, 2, 3}
 Dict = {"NOUN", "sing"}
 Units = {"Init", "NUMB"}
 Design = "forget"
SPECIFICATION Spec
INVARIANTS NoLoss NoJunk Remembered
CHECK_DEADLOCK FALSE
