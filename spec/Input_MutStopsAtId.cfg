SPECIFICATION Spec
CONSTANTS MaxLines = 3 Rewinds = TRUE Exact = TRUE WholeFile = TRUE StopsAtId = FALSE
INVARIANT ReadsWhatIsWritten CommentsDoNotMatter OrderDoesNotMatter BlocksAreSeparate
CHECK_DEADLOCK FALSE
