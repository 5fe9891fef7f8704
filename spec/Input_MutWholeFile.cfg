SPECIFICATION Spec
CONSTANTS MaxLines = 3 Rewinds = TRUE Exact = TRUE WholeFile = FALSE StopsAtId = TRUE
INVARIANT ReadsWhatIsWritten CommentsDoNotMatter OrderDoesNotMatter BlocksAreSeparate
CHECK_DEADLOCK FALSE
