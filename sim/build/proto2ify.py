#!/usr/bin/env python3
"""Rewrites the repository's edition-2023 .proto files as proto2, which is the
newest dialect the installed protoc (3.21) understands.

usage: proto2ify.py REPO OUTDIR
Writes OUTDIR/<same relative path>, only when the content changed.
"""
import os
import re
import sys

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|//[^\n]*|/\*.*?\*/|[A-Za-z_][\w.]*|[^\s]', re.S)


def convert(text):
  text = re.sub(r'//[^\n]*', '', text)
  text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
  text = re.sub(r'edition\s*=\s*"2023"\s*;', 'syntax = "proto2";', text)
  text = re.sub(r'option\s+features\.[^;]*;', '', text)
  text = re.sub(r'features\.\w+\s*=\s*\w+\s*,?\s*', '', text)
  text = re.sub(r'\[\s*\]', '', text)
  out = []
  stack = []
  # statement-wise scan
  i = 0
  buf = ''
  while i < len(text):
    c = text[i]
    if c == '"':
      j = i + 1
      while text[j] != '"':
        j += 2 if text[j] == '\\' else 1
      buf += text[i:j + 1]
      i = j + 1
      continue
    if c == '{':
      # option aggregate values inside [] not used in this repository.
      head = buf.strip().split()
      stack.append(head[0] if head else '')
      out.append(buf + '{')
      buf = ''
    elif c == '}':
      stack.pop()
      out.append(buf + '}')
      buf = ''
    elif c == ';':
      s = buf.strip()
      lead = buf[:len(buf) - len(buf.lstrip())]
      first = s.split()[0] if s.split() else ''
      if first == 'reserved':
        body = s[len('reserved'):].strip()
        parts = [p.strip() for p in body.split(',')]
        parts = [('"%s"' % p) if re.match(r'^[A-Za-z_]\w*$', p) else p
                 for p in parts]
        s = 'reserved ' + ', '.join(parts)
      elif (stack and stack[-1] == 'message' and first not in (
          'option', 'repeated', 'optional', 'required', 'extensions')
          and not s.startswith('map<') and re.search(r'=\s*\d+', s)):
        s = 'optional ' + s
      out.append(lead + s + ';')
      buf = ''
    else:
      buf += c
    i += 1
  out.append(buf)
  return ''.join(out)


def main():
  repo, outdir = sys.argv[1], sys.argv[2]
  for d, _, files in os.walk(os.path.join(repo, 'iamf', 'cli', 'proto')):
    for f in files:
      if not f.endswith('.proto'):
        continue
      p = os.path.join(d, f)
      o = os.path.join(outdir, os.path.relpath(p, repo))
      os.makedirs(os.path.dirname(o), exist_ok=True)
      new = convert(open(p, encoding='utf-8').read())
      old = None
      if os.path.exists(o):
        old = open(o, encoding='utf-8').read()
      if new != old:
        open(o, 'w', encoding='utf-8').write(new)


main()
