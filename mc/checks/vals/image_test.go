package vals

import (
	"fmt"
	stdimage "image"
	stdcolor "image/color"
	"strings"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/image"
	"verifmc/explore"
)

// painted is any image that can be painted.
type painted interface {
	stdimage.Image
	Set(x, y int, c stdcolor.Color)
}

// plainImage is an image type of its own, with bounds and a colour model of its own.
type plainImage struct {
	r   stdimage.Rectangle
	pix map[stdimage.Point]stdcolor.NRGBA64
}

func (p *plainImage) ColorModel() stdcolor.Model { return stdcolor.NRGBA64Model }
func (p *plainImage) Bounds() stdimage.Rectangle { return p.r }
func (p *plainImage) Set(x, y int, c stdcolor.Color) {
	p.pix[stdimage.Pt(x, y)] = stdcolor.NRGBA64Model.Convert(c).(stdcolor.NRGBA64)
}
func (p *plainImage) At(x, y int) stdcolor.Color {
	if !stdimage.Pt(x, y).In(p.r) {
		panic(fmt.Sprintf("pixel (%d,%d) lies outside the image %v", x, y, p.r))
	}
	return p.pix[stdimage.Pt(x, y)]
}

var palette = func() stdcolor.Palette {
	p := stdcolor.Palette{}
	for i := 0; i < 256; i++ {
		p = append(p, stdcolor.NRGBA{uint8(i), uint8(i * 7), uint8(255 - i), uint8(255 - i/3)})
	}
	return p
}()

type imageType struct {
	name string
	make func(r stdimage.Rectangle) stdimage.Image
}

func ycc(ratio stdimage.YCbCrSubsampleRatio) func(r stdimage.Rectangle) stdimage.Image {
	return func(r stdimage.Rectangle) stdimage.Image {
		im := stdimage.NewYCbCr(r, ratio)
		for i := range im.Y {
			im.Y[i] = uint8(i*37 + 11)
		}
		for i := range im.Cb {
			im.Cb[i] = uint8(i*91 + 3)
			im.Cr[i] = uint8(i*53 + 101)
		}
		return im
	}
}

var imageTypes = []imageType{
	{"RGBA", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewRGBA(r) }},
	{"NRGBA", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewNRGBA(r) }},
	{"RGBA64", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewRGBA64(r) }},
	{"NRGBA64", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewNRGBA64(r) }},
	{"Gray", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewGray(r) }},
	{"Gray16", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewGray16(r) }},
	{"Alpha", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewAlpha(r) }},
	{"Alpha16", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewAlpha16(r) }},
	{"CMYK", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewCMYK(r) }},
	{"Paletted", func(r stdimage.Rectangle) stdimage.Image { return stdimage.NewPaletted(r, palette) }},
	{"own type", func(r stdimage.Rectangle) stdimage.Image {
		return &plainImage{r, map[stdimage.Point]stdcolor.NRGBA64{}}
	}},
	{"YCbCr 4:4:4", ycc(stdimage.YCbCrSubsampleRatio444)},
	{"YCbCr 4:2:2", ycc(stdimage.YCbCrSubsampleRatio422)},
	{"YCbCr 4:2:0", ycc(stdimage.YCbCrSubsampleRatio420)},
	{"YCbCr 4:4:0", ycc(stdimage.YCbCrSubsampleRatio440)},
	{"YCbCr 4:1:1", ycc(stdimage.YCbCrSubsampleRatio411)},
	{"NYCbCrA", func(r stdimage.Rectangle) stdimage.Image {
		im := stdimage.NewNYCbCrA(r, stdimage.YCbCrSubsampleRatio420)
		for i := range im.Y {
			im.Y[i] = uint8(i*37 + 11)
			im.A[i] = uint8(255 - i*13)
		}
		for i := range im.Cb {
			im.Cb[i] = uint8(i*91 + 3)
			im.Cr[i] = uint8(i*53 + 101)
		}
		return im
	}},
}

func paint(im stdimage.Image, salt int) {
	p, ok := im.(painted)
	if !ok {
		return
	}
	b := im.Bounds()
	k := salt
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			p.Set(x, y, stdcolor.NRGBA64{uint16(k * 9973), uint16(k*30011 + 77), uint16(k*50021 + 4099), uint16(0xffff - k*1021)})
			k++
		}
	}
}

// expect reads the colours of an image by its definition.
func expect(im stdimage.Image) [][]color.RGB {
	b := im.Bounds()
	out := [][]color.RGB{}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		row := []color.RGB{}
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, bl, _ := im.At(x, y).RGBA()
			row = append(row, color.RGB{R: float64(r/256) / 255, G: float64(g/256) / 255, B: float64(bl/256) / 255})
		}
		out = append(out, row)
	}
	return out
}

func checkData(c *explore.Ctx, what string, d image.Data, want [][]color.RGB, wantW int) {
	w, h := d.Size()
	c.Eval(1)
	if h != len(want) || w != wantW {
		c.Fail("%s: the data has size %dx%d, the image %dx%d", what, w, h, wantW, len(want))
	}
	hs := explore.NewH().I(w).I(h)
	for y := range want {
		for x := range want[y] {
			got := d.RGBAt(x, y)
			if got != want[y][x] {
				c.Fail("%s: the pixel in column %d and row %d is %v, the image has %v there", what, x, y, got, want[y][x])
			}
			hs = hs.F(got.R).F(got.G).F(got.B)
		}
	}
	c.State(hs.Sum())
	c.Outcome(hs.Sum())
}

func typesItem(maxW, maxH int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("every image type, origin and part, up to %dx%d", maxW, maxH), Run: func(c *explore.Ctx) {
		t := imageTypes[c.Choose(len(imageTypes))]
		w, h := c.Choose(maxW+1), c.Choose(maxH+1)
		ox := []int{0, 3, -2, -100}[c.Choose(4)]
		oy := []int{0, 1, -5, 1000}[c.Choose(4)]
		if strings.Contains(t.name, "YCbCr") {
			// the standard library locates samples of these only for positions that are not negative
			ox, oy = ox*ox%97, oy*oy%97
		}
		im := t.make(stdimage.Rect(ox, oy, ox+w, oy+h))
		what := fmt.Sprintf("%s image %v", t.name, im.Bounds())
		paint(im, 1)
		if s, ok := im.(interface {
			SubImage(stdimage.Rectangle) stdimage.Image
		}); ok {
			x0, y0 := c.Choose(w+1), c.Choose(h+1)
			x1, y1 := x0+c.Choose(w+1-x0), y0+c.Choose(h+1-y0)
			if c.Skipped() {
				return
			}
			im = s.SubImage(stdimage.Rect(ox+x0, oy+y0, ox+x1, oy+y1))
			what += fmt.Sprintf(", part %v", im.Bounds())
		}
		if c.Skipped() {
			return
		}
		c.Logf("%s", what)
		want := expect(im)
		d := image.ToData(im)
		checkData(c, what, d, want, im.Bounds().Dx())
		// later changes of the image leave the data alone, and other conversions too
		paint(im, 5)
		d2 := image.ToData(im)
		checkData(c, what+", after the image changed", d, want, im.Bounds().Dx())
		checkData(c, what+", converted again", d2, expect(im), im.Bounds().Dx())
		n := image.NewData(w, h)
		black := make([][]color.RGB, h)
		for i := range black {
			black[i] = make([]color.RGB, w)
		}
		checkData(c, "new data", n, black, w)
	}}
}

// valuesItem converts every value of a channel.
func valuesItem() explore.Item {
	return explore.Item{Name: "every value of every channel", Run: func(c *explore.Ctx) {
		kind := c.Choose(6)
		hi := c.Choose(256)
		if c.Skipped() {
			return
		}
		r := stdimage.Rect(0, 0, 256, 1)
		var im stdimage.Image
		want := make([]color.RGB, 256)
		switch kind {
		case 0:
			g := stdimage.NewGray16(r)
			for lo := 0; lo < 256; lo++ {
				g.SetGray16(lo, 0, stdcolor.Gray16{Y: uint16(hi<<8 | lo)})
				v := float64(hi) / 255
				want[lo] = color.RGB{R: v, G: v, B: v}
			}
			im = g
		case 1:
			g := stdimage.NewRGBA64(r)
			for lo := 0; lo < 256; lo++ {
				g.SetRGBA64(lo, 0, stdcolor.RGBA64{R: uint16(hi<<8 | lo), G: uint16(lo<<8 | hi), B: uint16((255-hi)<<8 | lo), A: 0xffff})
				want[lo] = color.RGB{R: float64(hi) / 255, G: float64(lo) / 255, B: float64(255-hi) / 255}
			}
			im = g
		case 2:
			g := stdimage.NewRGBA(r)
			for lo := 0; lo < 256; lo++ {
				g.SetRGBA(lo, 0, stdcolor.RGBA{R: uint8(hi), G: uint8(lo), B: uint8(hi ^ lo), A: 255})
				want[lo] = color.RGB{R: float64(hi) / 255, G: float64(lo) / 255, B: float64(hi^lo) / 255}
			}
			im = g
		case 3:
			g := stdimage.NewNRGBA(r)
			for lo := 0; lo < 256; lo++ {
				g.SetNRGBA(lo, 0, stdcolor.NRGBA{R: uint8(hi), G: uint8(255 - hi), B: 255, A: uint8(lo)})
				// premultiplied, as 16-bit values
				pm := func(v int) float64 { return float64(v*257*lo*257/0xffff/256) / 255 }
				want[lo] = color.RGB{R: pm(hi), G: pm(255 - hi), B: pm(255)}
			}
			im = g
		case 4:
			g := stdimage.NewGray(r)
			for lo := 0; lo < 256; lo++ {
				g.SetGray(lo, 0, stdcolor.Gray{Y: uint8(lo + hi)})
				v := float64(uint8(lo+hi)) / 255
				want[lo] = color.RGB{R: v, G: v, B: v}
			}
			im = g
		case 5:
			g := stdimage.NewUniform(stdcolor.RGBA64{R: uint16(hi << 8), G: uint16(hi), B: 0xffff, A: 0xffff})
			// a uniform image is endless: look at it through an image with bounds
			im = window{g, stdimage.Rect(-1, -1, 255, 0)}
			for lo := range want {
				want[lo] = color.RGB{R: float64(hi) / 255, G: 0, B: 1}
			}
		}
		c.Logf("%T, high byte %d", im, hi)
		checkData(c, fmt.Sprintf("%T", im), image.ToData(im), [][]color.RGB{want}, 256)
	}}
}

type window struct {
	stdimage.Image
	r stdimage.Rectangle
}

func (w window) Bounds() stdimage.Rectangle { return w.r }

func sizesItem(sizes []int) explore.Item {
	return explore.Item{Name: "images of every listed width and height", Run: func(c *explore.Ctx) {
		w, h := sizes[c.Choose(len(sizes))], sizes[c.Choose(len(sizes))]
		t := imageTypes[[]int{0, 1, 6, 9, 10}[c.Choose(5)]]
		if c.Skipped() || w*h > 300000 {
			return
		}
		im := t.make(stdimage.Rect(-1, 2, w-1, 2+h))
		paint(im, 3)
		c.Logf("%s %v", t.name, im.Bounds())
		checkData(c, t.name, image.ToData(im), expect(im), w)
	}}
}

// thinItem: long and thin images, in both directions.
func thinItem(lengths, thick []int) explore.Item {
	return explore.Item{Name: fmt.Sprintf("images of %d lengths up to %d, %v pixels thick", len(lengths), lengths[len(lengths)-1], thick), Run: func(c *explore.Ctx) {
		w, h := lengths[c.Choose(len(lengths))], thick[c.Choose(len(thick))]
		if c.Choose(2) == 1 {
			w, h = h, w
		}
		t := imageTypes[[]int{0, 5, 11}[c.Choose(3)]]
		if c.Skipped() {
			return
		}
		im := t.make(stdimage.Rect(2, 1, w+2, h+1))
		paint(im, 3)
		c.Logf("%s %v", t.name, im.Bounds())
		checkData(c, t.name, image.ToData(im), expect(im), w)
	}}
}

func lengths(max int) []int {
	out := []int{}
	for n := 1; n <= max; n++ {
		out = append(out, n)
	}
	for n := 512; n <= 70000; n *= 2 {
		for _, d := range []int{-1, 0, 1, 7, n / 2} {
			if n+d > max && n+d <= 70000 {
				out = append(out, n+d)
			}
		}
	}
	return append(out, 70001)
}

func init() {
	explore.Register(&explore.Check{
		ID:     "C20",
		Bounds: "17 image types, every size up to the bound, 16 origins and every sub-image; every 16-bit value of a channel and every pair of 8-bit values; widths and heights up to 3000, thin images of every length up to 300 (thorough: 2100) and up to 70001",
		Items: func(tier string) []explore.Item {
			if tier == "thorough" {
				return []explore.Item{typesItem(6, 5), valuesItem(), sizesItem([]int{0, 1, 2, 3, 17, 64, 255, 256, 257, 300, 511, 512, 1000, 3000}), thinItem(lengths(2100), []int{1, 2, 3, 5, 8})}
			}
			return []explore.Item{typesItem(4, 3), valuesItem(), sizesItem([]int{1, 2, 17, 256, 257, 1000, 3000}), thinItem(lengths(300), []int{1, 3})}
		},
	})
}
