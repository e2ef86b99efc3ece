package schemalex

import "context"

// ZZLex returns the tokens of a text (overlay of the witness search).
func ZZLex(b []byte) []Token {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var l []Token
	for t := range lex(ctx, b) {
		l = append(l, *t)
		if len(l) > 2*len(b)+10 {
			break
		}
	}
	return l
}
