SPECIFICATION Spec
CONSTANTS Starts = {16, 64, 112} Depth = 5 MaxVars = 3
INVARIANTS Apart NoDangling Cells OneHolder CopyAccepted BrokenRefused LostRefused Named1 Outside ResizeBack
CHECK_DEADLOCK FALSE
