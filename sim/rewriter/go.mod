module rewriter

go 1.21
