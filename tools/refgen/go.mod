module refgen

go 1.21
