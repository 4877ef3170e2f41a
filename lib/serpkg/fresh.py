"""Decodes in a new process: reads JSON texts, writes the images."""
import json
import sys


def main():
    from node.serializer import deserialize
    out = []
    for text in json.load(sys.stdin):
        try:
            got = deserialize(text)
            from serpkg.types import image
            out.append(['ok', image(got)])
        except Exception as e:
            out.append(['exc', repr(e)])
    json.dump(out, sys.stdout)


main()
