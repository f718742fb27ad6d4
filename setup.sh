#!/bin/sh
# nothing to build in advance: every check loads the sources of /repo itself
exit 0
