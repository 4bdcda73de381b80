prop="C10"
mod,pkg="tea","internal/infrastructure/renderer"
edits=[("tea/internal/infrastructure/renderer/inline.go","""					// ST = ESC \\ — consume the '\\'
					if i < len(s) && s[i] == '\\\\' {
						i++
					}
					break
				}
			}
		default:
			// Two-byte sequence: ESC <char> — skip the next char
			i++
		}
	}
	return b.String()
""","""					// ST = ESC \\ — consume the '\\'
					if s[i] == '\\\\' {
						i++
					}
					break
				}
			}
		default:
			// Two-byte sequence: ESC <char> — skip the next char
			i++
		}
	}
	return b.String()
""")]
needs="a view line that ends in the middle of the terminator of a title or link sequence (ESC without backslash)"
breaks="the string terminator is looked at without testing that the line goes on: rendering the line panics"
test='''
package renderer

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	var out bytes.Buffer
	if err := NewInlineRenderer(&out, 80, 24).Render("a\\x1b]0;title\\x1b\\nb"); err != nil {
		t.Fatal(err)
	}
}
'''
