module verifspec

go 1.24
