module verifharness

go 1.19

require github.com/lkmio/avformat v0.0.0

replace github.com/lkmio/avformat => /repo
