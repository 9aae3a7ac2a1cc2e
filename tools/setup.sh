#!/bin/bash
cd "$(dirname "$0")/.." && bash tools/build.sh
