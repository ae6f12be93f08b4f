module genalias

go 1.21
