SPECIFICATION Spec
CONSTANTS MaxLines = 3 Rewinds = FALSE Exact = TRUE WholeFile = TRUE StopsAtId = TRUE
INVARIANT ReadsWhatIsWritten CommentsDoNotMatter OrderDoesNotMatter BlocksAreSeparate
CHECK_DEADLOCK FALSE
