module verifextract

go 1.24
