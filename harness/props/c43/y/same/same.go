// Package same exists twice: its types differ only in the import path.
package same

// T is a number.
type T struct{ N int }
