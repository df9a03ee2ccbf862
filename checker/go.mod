module verifchecker

go 1.23
