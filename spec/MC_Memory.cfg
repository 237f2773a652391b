SPECIFICATION Spec
CONSTANTS Starts = {16, 64} Depth = 4 MaxVars = 2
INVARIANTS Apart NoDangling Cells OneHolder CopyAccepted BrokenRefused LostRefused Named1 Outside ResizeBack
CHECK_DEADLOCK FALSE
