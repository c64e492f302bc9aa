. /opt/vp/env.sh
cd /tmp/rf/repo/src && go build ./util ./collection && go build -o /tmp/rf/pk main/pkeygen.go && go build -o /tmp/rf/pp main/poodle.go
