package app

// SetTermWidth is added by the overlay of the harness only.
func SetTermWidth(w int) { termWidth = w; termHeight = 1 << 30 }
