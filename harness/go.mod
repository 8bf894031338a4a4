module github.com/unidoc/unitype/verifmon

go 1.18

require (
	github.com/sirupsen/logrus v1.9.3
	github.com/unidoc/unitype v0.5.1
	golang.org/x/text v0.21.0
)

require golang.org/x/sys v0.29.0 // indirect

replace github.com/unidoc/unitype => /repo
