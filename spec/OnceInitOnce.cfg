SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Grammars = {1, 2}
 Size = 2
 Calls = 2
 Protocol = "once"
INVARIANT Whole
PROPERTY Kept Answered
