#!/bin/bash
bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json && true; cat /tmp/o.json; cd /repo; git status --short
