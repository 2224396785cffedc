SPECIFICATION Spec
CONSTANTS MaxViews = 1 MaxOps = 2 Emitting = TRUE
VIEW GenView
ACTION_CONSTRAINT Out
CHECK_DEADLOCK FALSE
