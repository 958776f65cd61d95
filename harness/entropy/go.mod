module a.verif/entropy

go 1.26.0
