rm -f /tmp/test.done
setsid nohup bash -c 'bash /opt/vp/build.sh >/tmp/build.log 2>&1; timeout 900 bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1; tail -1 /tmp/test.log > /tmp/test.done' </dev/null >/dev/null 2>&1 &
