SPECIFICATION Spec
INVARIANTS NonEmpty UnknAlone ScoresRange Ranked SumsToOne SelfConsistent Report
CHECK_DEADLOCK FALSE
