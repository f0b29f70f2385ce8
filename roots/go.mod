module goannoyroots

go 1.20

require github.com/mariotoffia/goannoy v0.0.0

require (
	github.com/jfcg/sixb v1.3.8 // indirect
	github.com/jfcg/sorty/v2 v2.1.0 // indirect
	golang.org/x/exp v0.0.0-20230321023759-10a507213a29 // indirect
)

replace github.com/mariotoffia/goannoy => /repo
