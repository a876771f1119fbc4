SPECIFICATION Spec
CONSTANTS Statuses = {"not ready", "s1", "s2", "s3"}
INVARIANTS TypeOK AnswersOK EmitInit
PROPERTIES Independent PanicNoEffect
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
