SPECIFICATION Schedules
CONSTANTS Threads = {1, 2, 3}
 Grammars = {1, 2}
 Size = 2
 Calls = 1
 Protocol = "once"
INVARIANT Whole Listed
