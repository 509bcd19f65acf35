module vharness

go 1.25

require github.com/dropmorepackets/haproxy-go v0.0.0

replace github.com/dropmorepackets/haproxy-go => /repo
