module ginicheck

go 1.21

require github.com/go-air/gini v0.0.0

replace github.com/go-air/gini => /repo
