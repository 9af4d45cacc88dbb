#!/bin/bash
# usage: c.sh "msg"
cd /repo && gofmt -l . ; go vet ./... 2>&1 | head -5; bash /tmp/t.sh | tr '\n' ' ' | head -c 600; echo; git -C /repo checkout -- '*.ym' 2>/dev/null; git add -A && git commit -qm "$1" && git log --oneline | head -1
