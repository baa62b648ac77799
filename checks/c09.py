#!/usr/bin/env python3
"""C09: see properties.jsonl and DESIGN.md."""
import futcheck

if __name__ == "__main__":
    futcheck.main("C09")
