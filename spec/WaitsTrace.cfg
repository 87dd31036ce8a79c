SPECIFICATION Spec
CONSTANT Slack = 25000
CHECK_DEADLOCK FALSE
