module verif/mutate

go 1.22.3
