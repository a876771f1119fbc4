SPECIFICATION Spec
CONSTANT MaxReg = 4
INVARIANTS EmitS Independent Within Back
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE
