// Package fpdf stands in for github.com/go-pdf/fpdf: it records the documents
// made with it.
package fpdf

import (
	"errors"
	"io"
	"strings"
)

// SizeType is the size of a page, in the unit of its document.
type SizeType struct {
	Wd, Ht float64
}

// PointType is a position on a page.
type PointType struct {
	X, Y float64
}

// InitType says how a document starts.
type InitType struct {
	OrientationStr string
	UnitStr        string
	SizeStr        string
	Size           SizeType
	FontDirStr     string
}

// Page is a page of a document, in points, and what is drawn on it.
type Page struct {
	W, H  float64
	Marks []string
}

// Doc is a document handed out: the file it went to ("" for a writer) and its
// pages.
type Doc struct {
	Name  string
	Pages []Page
}

// Docs are the documents handed out.
var Docs []Doc

// Fail, if any, is the failure of whatever a document is handed out to.
var Fail error

// Fpdf is a document.
type Fpdf struct {
	err    error
	k      float64
	w, h   float64 // of a page as created
	pages  []Page
	x, y   float64
	margin float64
	closed bool
}

func New(orientationStr, unitStr, sizeStr, fontDirStr string) *Fpdf {
	return NewCustom(&InitType{OrientationStr: orientationStr, UnitStr: unitStr, SizeStr: sizeStr, FontDirStr: fontDirStr})
}

func NewCustom(init *InitType) *Fpdf {
	f := &Fpdf{}
	switch init.UnitStr {
	case "pt", "point":
		f.k = 1
	case "", "mm":
		f.k = 72 / 25.4
	case "cm":
		f.k = 72 / 2.54
	case "in", "inch":
		f.k = 72
	default:
		f.err = errors.New("incorrect unit " + init.UnitStr)
		return f
	}
	size := init.Size
	if !(size.Wd > 0 && size.Ht > 0) {
		switch strings.ToLower(init.SizeStr) {
		case "a3":
			size = SizeType{841.89 / f.k, 1190.55 / f.k}
		case "", "a4":
			size = SizeType{595.28 / f.k, 841.89 / f.k}
		case "a5":
			size = SizeType{420.94 / f.k, 595.28 / f.k}
		case "letter":
			size = SizeType{612 / f.k, 792 / f.k}
		case "legal":
			size = SizeType{612 / f.k, 1008 / f.k}
		default:
			f.err = errors.New("unknown page size " + init.SizeStr)
			return f
		}
	}
	switch strings.ToLower(init.OrientationStr) {
	case "", "p", "portrait":
		f.w, f.h = size.Wd, size.Ht
	case "l", "landscape":
		f.w, f.h = size.Ht, size.Wd
	default:
		f.err = errors.New("incorrect orientation " + init.OrientationStr)
	}
	return f
}

func (f *Fpdf) AddPage() {
	if f.err != nil {
		return
	}
	if f.closed {
		f.err = errors.New("fpdf: the document is closed")
		return
	}
	f.pages = append(f.pages, Page{W: f.w * f.k, H: f.h * f.k})
}

func (f *Fpdf) AddPageFormat(orientationStr string, size SizeType) {
	w, h := f.w, f.h
	f.w, f.h = size.Wd, size.Ht
	if o := strings.ToLower(orientationStr); o == "l" || o == "landscape" {
		f.w, f.h = size.Ht, size.Wd
	}
	f.AddPage()
	f.w, f.h = w, h
}

func (f *Fpdf) hand(name string) {
	f.Close()
	if f.err == nil {
		if Fail != nil {
			f.err = Fail
			return
		}
		Docs = append(Docs, Doc{Name: name, Pages: f.pages})
	}
}

func (f *Fpdf) OutputFileAndClose(fileStr string) error {
	f.hand(fileStr)
	return f.err
}

func (f *Fpdf) OutputAndClose(w io.WriteCloser) error {
	f.Output(w)
	w.Close()
	return f.err
}

func (f *Fpdf) Output(w io.Writer) error {
	if f.hand(""); f.err == nil {
		_, f.err = w.Write([]byte("%PDF"))
	}
	return f.err
}

func (f *Fpdf) Close() {
	if f.err != nil {
		return
	}
	if len(f.pages) == 0 {
		f.AddPage()
	}
	f.closed = true
}

func (f *Fpdf) Err() bool    { return f.err != nil }
func (f *Fpdf) Ok() bool     { return f.err == nil }
func (f *Fpdf) Error() error { return f.err }
func (f *Fpdf) ClearError()  { f.err = nil }
func (f *Fpdf) SetError(err error) {
	if f.err == nil && err != nil {
		f.err = err
	}
}

func (f *Fpdf) mark(what string) {
	if f.err != nil {
		return
	}
	if len(f.pages) == 0 {
		f.err = errors.New("no page has been added yet")
		return
	}
	p := &f.pages[len(f.pages)-1]
	p.Marks = append(p.Marks, what)
}

func (f *Fpdf) PageNo() int    { return len(f.pages) }
func (f *Fpdf) PageCount() int { return len(f.pages) }
func (f *Fpdf) GetPageSize() (width, height float64) {
	return f.w, f.h
}
func (f *Fpdf) PageSize(pageNum int) (wd, ht float64, unitStr string) {
	return f.w, f.h, "pt"
}
func (f *Fpdf) GetConversionRatio() float64 { return f.k }
func (f *Fpdf) UnitToPointConvert(u float64) float64 {
	return u * f.k
}
func (f *Fpdf) PointConvert(pt float64) float64       { return pt / f.k }
func (f *Fpdf) PointToUnitConvert(pt float64) float64 { return pt / f.k }

func (f *Fpdf) SetMargins(left, top, right float64)                 {}
func (f *Fpdf) SetLeftMargin(margin float64)                        {}
func (f *Fpdf) SetTopMargin(margin float64)                         {}
func (f *Fpdf) SetRightMargin(margin float64)                       {}
func (f *Fpdf) SetCellMargin(margin float64)                        {}
func (f *Fpdf) SetAutoPageBreak(auto bool, margin float64)          {}
func (f *Fpdf) SetCompression(compress bool)                        {}
func (f *Fpdf) SetTitle(s string, isUTF8 bool)                      {}
func (f *Fpdf) SetAuthor(s string, isUTF8 bool)                     {}
func (f *Fpdf) SetCreator(s string, isUTF8 bool)                    {}
func (f *Fpdf) SetProducer(s string, isUTF8 bool)                   {}
func (f *Fpdf) SetSubject(s string, isUTF8 bool)                    {}
func (f *Fpdf) SetKeywords(s string, isUTF8 bool)                   {}
func (f *Fpdf) SetDisplayMode(zoomStr, layoutStr string)            {}
func (f *Fpdf) SetCatalogSort(flag bool)                            {}
func (f *Fpdf) SetDrawColor(r, g, b int)                            {}
func (f *Fpdf) SetFillColor(r, g, b int)                            {}
func (f *Fpdf) SetTextColor(r, g, b int)                            {}
func (f *Fpdf) SetAlpha(alpha float64, blendModeStr string)         {}
func (f *Fpdf) SetLineWidth(width float64)                          {}
func (f *Fpdf) SetFont(familyStr, styleStr string, size float64)    {}
func (f *Fpdf) SetFontSize(size float64)                            {}
func (f *Fpdf) SetFontUnitSize(size float64)                        {}
func (f *Fpdf) AddFont(familyStr, styleStr, fileStr string)         {}
func (f *Fpdf) AddUTF8Font(familyStr, styleStr, fileStr string)     {}
func (f *Fpdf) AddUTF8FontFromBytes(fam, style string, b []byte)    {}
func (f *Fpdf) SetXY(x, y float64)                                  { f.x, f.y = x, y }
func (f *Fpdf) SetX(x float64)                                      { f.x = x }
func (f *Fpdf) SetY(y float64)                                      { f.y = y }
func (f *Fpdf) GetX() float64                                       { return f.x }
func (f *Fpdf) GetY() float64                                       { return f.y }
func (f *Fpdf) GetXY() (float64, float64)                           { return f.x, f.y }
func (f *Fpdf) Ln(h float64)                                        {}
func (f *Fpdf) TransformBegin()                                     {}
func (f *Fpdf) TransformEnd()                                       {}
func (f *Fpdf) TransformTranslate(tx, ty float64)                   {}
func (f *Fpdf) Rect(x, y, w, h float64, styleStr string)            { f.mark("rect") }
func (f *Fpdf) Line(x1, y1, x2, y2 float64)                         { f.mark("line") }
func (f *Fpdf) Polygon(points []PointType, styleStr string)         { f.mark("polygon") }
func (f *Fpdf) MoveTo(x, y float64)                                 { f.x, f.y = x, y }
func (f *Fpdf) LineTo(x, y float64)                                 { f.x, f.y = x, y }
func (f *Fpdf) CurveTo(cx, cy, x, y float64)                        {}
func (f *Fpdf) CurveBezierCubicTo(a, b, c, d, x, y float64)         {}
func (f *Fpdf) ClosePath()                                          {}
func (f *Fpdf) DrawPath(styleStr string)                            { f.mark("path") }
func (f *Fpdf) Text(x, y float64, txtStr string)                    { f.mark("text") }
func (f *Fpdf) Write(h float64, txtStr string)                      { f.mark("text") }
func (f *Fpdf) Cell(w, h float64, txtStr string)                    { f.mark("text") }
func (f *Fpdf) Cellf(w, h float64, fmtStr string, args ...any)      { f.mark("text") }
func (f *Fpdf) MultiCell(w, h float64, txt, bdr, al string, x bool) { f.mark("text") }
func (f *Fpdf) GetStringWidth(s string) float64                     { return 0 }
func (f *Fpdf) RawWriteStr(str string)                              { f.mark("raw") }
