module rewriter

go 1.26
