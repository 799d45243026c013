module github.com/siebenmann/smtpd

go 1.25

require verif v0.0.0

replace verif => ../go
