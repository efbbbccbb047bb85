SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Grammars = {1, 2}
 Size = 2
 Calls = 1
 Protocol = "racing"
INVARIANT Whole
PROPERTY Kept Answered
