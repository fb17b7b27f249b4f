module verif

go 1.26.0

require (
	github.com/zbdba/db-recovery v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/golang/glog v0.0.0-20160126235308-23def4e6c14b // indirect

replace github.com/zbdba/db-recovery => /repo
