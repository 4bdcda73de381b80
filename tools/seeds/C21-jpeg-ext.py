prop="C21"
mod,pkg="clipboard","internal/domain/service"
edits=[("clipboard/internal/domain/service/image_codec.go","""	case value.MIMETypeImageGIF:
		return c.EncodeGIF(img)
	default:
		return nil, fmt.Errorf("unsupported target""","""	case value.MIMETypeImageGIF:
		return c.EncodeGIF(img)
	case value.MIMETypeImageBMP:
		return c.EncodePNG(img)
	default:
		return nil, fmt.Errorf("unsupported target""")]
needs="a conversion to BMP"
breaks="asking for BMP yields PNG data labelled as a BMP"
test='''
package service

import (
	"image"
	"testing"

	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
)

func TestSeed(t *testing.T) {
	c := NewImageCodec()
	data, err := c.EncodePNG(image.NewRGBA(image.Rect(0, 0, 2, 2)))
	if err != nil {
		t.Fatal(err)
	}
	for _, m := range []value.MIMEType{value.MIMETypeImagePNG, value.MIMETypeImageJPEG, value.MIMETypeImageGIF, value.MIMETypeImageBMP} {
		out, err := c.ConvertFormat(data, m)
		if err != nil {
			continue
		}
		if got, _ := c.DetectFormat(out); got != m {
			t.Errorf("converted to %s, got %s", m, got)
		}
	}
}
'''
