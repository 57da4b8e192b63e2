package main

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Lex reads a text by the lexical rules of Cypher. A name or a string is one token, however it is written:
// ASCII identifiers are plain, any other name is "`" + name, a string is "'" + value, a number is canonical.
// What does not belong to any token is a token of its own that starts with "?".
func Lex(s string) []string {
	out := []string{}
	i := 0
	for i < len(s) {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == ' ' || r == '\t' || r == '\n' || r == '\r':
			i += n
		case r == '`':
			name, j, ok := quoted(s, i, '`', false)
			if !ok {
				return append(out, "?unterminated "+printable(s[i:]))
			}
			out = append(out, nameTok(name))
			i = j
		case r == '\'' || r == '"':
			val, j, ok := quoted(s, i, byte(r), true)
			if !ok {
				return append(out, "?unterminated "+printable(s[i:]))
			}
			out = append(out, "'"+printable(val))
			i = j
		case r == '_' || unicode.IsLetter(r):
			j := i
			for j < len(s) {
				r, n := utf8.DecodeRuneInString(s[j:])
				if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
					break
				}
				j += n
			}
			out = append(out, nameTok(s[i:j]))
			i = j
		case r >= '0' && r <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			isInt := true
			if j+1 < len(s) && s[j] == '.' && s[j+1] >= '0' && s[j+1] <= '9' {
				isInt = false
				j++
				for j < len(s) && s[j] >= '0' && s[j] <= '9' {
					j++
				}
			}
			if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < len(s) && s[k] == '-' {
					k++
				}
				if k < len(s) && s[k] >= '0' && s[k] <= '9' {
					isInt = false
					j = k
					for j < len(s) && s[j] >= '0' && s[j] <= '9' {
						j++
					}
				}
			}
			text := s[i:j]
			// a digit sequence that runs into letters is no number
			if j < len(s) {
				if r, _ := utf8.DecodeRuneInString(s[j:]); r == '_' || unicode.IsLetter(r) {
					text = "?" + text
				}
			}
			if isInt && len(text) > 1 && text[0] == '0' {
				text = "?octal " + text
			}
			if isInt && text[0] != '?' {
				if _, err := strconv.ParseInt(text, 10, 64); err != nil && text != "9223372036854775808" {
					text = "?range " + text
				}
			}
			if !isInt && text[0] != '?' {
				f, err := strconv.ParseFloat(text, 64)
				if err != nil {
					text = "?" + text
				} else {
					text = CanonFloat(f)
				}
			}
			out = append(out, text)
			i = j
		default:
			two := ""
			if i+2 <= len(s) {
				two = s[i : i+2]
			}
			switch two {
			case "<>", "<=", ">=", "=~", "+=", "..":
				out = append(out, two)
				i += 2
				continue
			case "//", "/*":
				return append(out, "?comment "+printable(s[i:]))
			}
			if n == 1 && strings.ContainsRune("()[]{}:,.|*+-/%^=<>$", r) {
				out = append(out, string(r))
			} else {
				out = append(out, "?"+printable(s[i:i+n]))
			}
			i += n
		}
	}
	return out
}

func nameTok(name string) string {
	ident := name != ""
	for i := 0; i < len(name); i++ {
		c := name[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			ident = false
		}
	}
	if ident {
		return name
	}
	return "`" + printable(name)
}

// quoted reads the quoted token that starts at i; in names a doubled quote is a quote, in strings \ escapes.
func quoted(s string, i int, q byte, escapes bool) (string, int, bool) {
	var b strings.Builder
	j := i + 1
	for j < len(s) {
		c := s[j]
		if c == q {
			if !escapes && j+1 < len(s) && s[j+1] == q {
				b.WriteByte(q)
				j += 2
				continue
			}
			return b.String(), j + 1, true
		}
		if escapes && c == '\\' {
			if j+1 >= len(s) {
				return "", 0, false
			}
			switch s[j+1] {
			case '\\', '\'', '"':
				b.WriteByte(s[j+1])
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'u':
				if j+6 > len(s) {
					return "", 0, false
				}
				v, err := strconv.ParseUint(s[j+2:j+6], 16, 32)
				if err != nil {
					return "", 0, false
				}
				b.WriteRune(rune(v))
				j += 6
				continue
			default:
				return "", 0, false // not an escape sequence of Cypher
			}
			j += 2
			continue
		}
		b.WriteByte(c)
		j++
	}
	return "", 0, false
}

// printable maps bytes that are not UTF-8 to characters of the private use area, so that they survive JSON.
func printable(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b.WriteRune(0xE000 + rune(s[i]))
		} else {
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

// CanonFloat is the canonical text of a number.
func CanonFloat(f float64) string {
	if f != f {
		return "NaN"
	}
	if f > 1.7976931348623157e308 {
		return "Inf"
	}
	if f < -1.7976931348623157e308 {
		return "-Inf"
	}
	a := f
	if a < 0 {
		a = -a
	}
	if a == 0 {
		return "0"
	}
	if a >= 1e-6 && a < 9.2e18 {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return strconv.FormatFloat(f, 'e', -1, 64)
}
