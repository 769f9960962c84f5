#!/bin/bash
. /opt/vp/env.sh
exec /verif/bin/gosym "$@"
