module verif.local/sim

go 1.25.0
