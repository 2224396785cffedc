SPECIFICATION Spec
CONSTANTS MaxViews = 2 MaxOps = 1 Emitting = TRUE
VIEW GenView
ACTION_CONSTRAINT Out
CHECK_DEADLOCK FALSE
