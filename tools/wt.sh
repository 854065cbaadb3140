#!/bin/bash
# a fresh scratch copy of /repo at /tmp/wt
rm -rf /tmp/wt; cp -a /repo /tmp/wt; git -C /tmp/wt checkout -q -- .
