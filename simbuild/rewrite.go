package main

import (
	"go/ast"
	"reflect"
)

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

// rewriteExprs replaces expressions everywhere in n (bottom up).
func rewriteExprs(n ast.Node, fn func(ast.Expr) ast.Expr) {
	rewriteValue(reflect.ValueOf(n), fn, map[uintptr]bool{})
}

func rewriteValue(v reflect.Value, fn func(ast.Expr) ast.Expr, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.Comment:
			return
		}
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		e := v.Elem()
		if e.Kind() != reflect.Struct {
			return
		}
		for i := 0; i < e.NumField(); i++ {
			f := e.Field(i)
			name := e.Type().Field(i).Name
			if _, ok := v.Interface().(*ast.File); ok && (name == "Unresolved" || name == "Imports" || name == "Scope") {
				continue
			}
			if _, ok := v.Interface().(*ast.KeyValueExpr); ok && name == "Key" {
				// A plain identifier key is a field name in struct literals.
				if _, isID := f.Interface().(*ast.Ident); isID {
					continue
				}
			}
			rewriteField(f, fn, seen)
		}
	case reflect.Interface:
		if !v.IsNil() {
			rewriteValue(v.Elem(), fn, seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			rewriteField(v.Index(i), fn, seen)
		}
	}
}

func rewriteField(f reflect.Value, fn func(ast.Expr) ast.Expr, seen map[uintptr]bool) {
	rewriteValue(f, fn, seen)
	if f.Type() == exprType && !f.IsNil() {
		ne := fn(f.Interface().(ast.Expr))
		if ne != f.Interface().(ast.Expr) {
			f.Set(reflect.ValueOf(ne))
		}
	}
}
