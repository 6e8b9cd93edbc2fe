module verif

go 1.27

require github.com/go-stomp/stomp/v3 v3.0.0

replace github.com/go-stomp/stomp/v3 => /repo
