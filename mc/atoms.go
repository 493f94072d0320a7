package main

import "golang.org/x/net/html/atom"

const bodyAtom = atom.Body
