SPECIFICATION Spec
CONSTANTS
 MaxKids = 2
 MaxAttrs = 1
 Tags = {"let", "reset_env", "append_env", "log", "include", "arg", "group", "timer", "executable"}
INVARIANTS Same Local NoneIgnored NoneIgnoredYaml Fewer Order
CHECK_DEADLOCK FALSE
