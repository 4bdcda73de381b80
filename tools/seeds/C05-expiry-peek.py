prop="C05"
mod,pkg='clipboard','internal/domain/service'
edits=[('clipboard/internal/domain/service/clipboard_history.go','''	h.mu.Lock()
	defer h.mu.Unlock()

	if h.maxAge <= 0 {
		return 0 // No expiration
	}
''','''	if h.maxAge <= 0 {
		return 0 // No expiration
	}

	h.mu.Lock()
	defer h.mu.Unlock()
''')]
race=True
needs='RemoveExpired running concurrently with SetMaxAge'
breaks='the maximum age is read without the lock that guards it'
test='''
package service

import (
	"sync"
	"testing"
	"time"
)

func TestSeed(t *testing.T) {
	h := NewClipboardHistory(10, time.Hour)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			h.SetMaxAge(time.Duration(i))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			h.RemoveExpired()
		}
	}()
	wg.Wait()
}
'''
