SPECIFICATION Spec
CONSTANTS MaxLines = 4 Rewinds = TRUE Exact = TRUE WholeFile = TRUE StopsAtId = TRUE
INVARIANT ReadsWhatIsWritten CommentsDoNotMatter OrderDoesNotMatter BlocksAreSeparate
PROPERTY Answers
CHECK_DEADLOCK FALSE
