module verif.local/srand

go 1.25

require verif.local/sim v0.0.0

replace verif.local/sim => ../sim
