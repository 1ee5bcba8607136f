SPECIFICATION Spec
VIEW View
CONSTANT Tab <- TraceTab
CHECK_DEADLOCK FALSE
