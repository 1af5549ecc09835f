module verif/conc

go 1.24
