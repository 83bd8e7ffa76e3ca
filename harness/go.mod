module verif/harness

go 1.20

require go.f110.dev/go-memcached v0.0.0

require gopkg.in/yaml.v3 v3.0.1 // indirect

replace go.f110.dev/go-memcached => /repo
