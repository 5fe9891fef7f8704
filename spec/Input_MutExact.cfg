SPECIFICATION Spec
CONSTANTS MaxLines = 3 Rewinds = TRUE Exact = FALSE WholeFile = TRUE StopsAtId = TRUE
INVARIANT ReadsWhatIsWritten CommentsDoNotMatter OrderDoesNotMatter BlocksAreSeparate
CHECK_DEADLOCK FALSE
