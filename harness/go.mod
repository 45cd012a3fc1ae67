module dukptverif

go 1.23.0
