prop="C11"; mod="mouse"; pkg="internal/domain/service"
edits=[("mouse/internal/domain/service/click_detector.go","		d.clickCount = 1\n		clickType = value.EventClick\n","		clickType = value.EventClick\n")]
needs="a fourth and a fifth quick click on the same cell"
breaks="the click count is not started again after a triple click: it runs past 3, and the fifth click is not the double click it should be"
test='''package service

import (
	"testing"
	"time"

	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/value"
)

func TestSeed(t *testing.T) {
	d := NewClickDetector(time.Second, 1)
	at := time.Unix(1000, 0)
	for i := 0; i < 5; i++ {
		e := model.NewMouseEventWithTimestamp(value.EventRelease, value.ButtonLeft, value.NewPosition(3, 3), value.ModifierNone, at)
		d.DetectClick(e)
		if d.ClickCount() > 3 {
			t.Fatalf("click count %d", d.ClickCount())
		}
	}
}
'''
