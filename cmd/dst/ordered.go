package main

import (
	"bytes"
	"sort"
)

// ordered is an ordered set of keys (a sorted slice is enough here).
type ordered struct{ ks [][]byte }

func newOrdered() *ordered { return &ordered{} }

func (t *ordered) find(k []byte) int {
	return sort.Search(len(t.ks), func(i int) bool { return bytes.Compare(t.ks[i], k) >= 0 })
}

func (t *ordered) insert(k []byte) {
	i := t.find(k)
	if i < len(t.ks) && bytes.Equal(t.ks[i], k) {
		return
	}
	t.ks = append(t.ks, nil)
	copy(t.ks[i+1:], t.ks[i:])
	t.ks[i] = k
}

func (t *ordered) remove(k []byte) {
	i := t.find(k)
	if i < len(t.ks) && bytes.Equal(t.ks[i], k) {
		t.ks = append(t.ks[:i], t.ks[i+1:]...)
	}
}

// prefixFree: no member is a prefix of k or has k as a prefix.
func (t *ordered) prefixFree(k []byte) bool {
	i := t.find(k)
	if i < len(t.ks) && bytes.HasPrefix(t.ks[i], k) {
		return false
	}
	if i > 0 && bytes.HasPrefix(k, t.ks[i-1]) {
		return false
	}
	return true
}
