module verifspec

go 1.23

require github.com/influxdata/go-syslog/v3 v3.0.0

require github.com/leodido/ragel-machinery v0.0.0-20181214104525-299bdde78165

replace github.com/influxdata/go-syslog/v3 => /repo
