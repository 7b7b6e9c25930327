#!/bin/bash
exec bash "$(dirname "$0")/../p20/prep.sh" "$@"
