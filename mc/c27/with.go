package main

import "github.com/Ptt-official-app/go-bbs"

// with returns a connector which has the optional interfaces of mask and no others.
func with(d *driver, mask int) bbs.Connector {
	switch mask {
	case 0:
		return struct {
			bbs.Connector
		}{d}
	case 1:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
		}{d, d}
	case 2:
		return struct {
			bbs.Connector
			bbs.WriteArticleConnector
		}{d, d}
	case 3:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.WriteArticleConnector
		}{d, d, d}
	case 4:
		return struct {
			bbs.Connector
			bbs.UserArticleConnector
		}{d, d}
	case 5:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.UserArticleConnector
		}{d, d, d}
	case 6:
		return struct {
			bbs.Connector
			bbs.WriteArticleConnector
			bbs.UserArticleConnector
		}{d, d, d}
	case 7:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.WriteArticleConnector
			bbs.UserArticleConnector
		}{d, d, d, d}
	case 8:
		return struct {
			bbs.Connector
			bbs.UserCommentConnector
		}{d, d}
	case 9:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.UserCommentConnector
		}{d, d, d}
	case 10:
		return struct {
			bbs.Connector
			bbs.WriteArticleConnector
			bbs.UserCommentConnector
		}{d, d, d}
	case 11:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.WriteArticleConnector
			bbs.UserCommentConnector
		}{d, d, d, d}
	case 12:
		return struct {
			bbs.Connector
			bbs.UserArticleConnector
			bbs.UserCommentConnector
		}{d, d, d}
	case 13:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.UserArticleConnector
			bbs.UserCommentConnector
		}{d, d, d, d}
	case 14:
		return struct {
			bbs.Connector
			bbs.WriteArticleConnector
			bbs.UserArticleConnector
			bbs.UserCommentConnector
		}{d, d, d, d}
	case 15:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.WriteArticleConnector
			bbs.UserArticleConnector
			bbs.UserCommentConnector
		}{d, d, d, d, d}
	case 16:
		return struct {
			bbs.Connector
			bbs.UserDraftConnector
		}{d, d}
	case 17:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.UserDraftConnector
		}{d, d, d}
	case 18:
		return struct {
			bbs.Connector
			bbs.WriteArticleConnector
			bbs.UserDraftConnector
		}{d, d, d}
	case 19:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.WriteArticleConnector
			bbs.UserDraftConnector
		}{d, d, d, d}
	case 20:
		return struct {
			bbs.Connector
			bbs.UserArticleConnector
			bbs.UserDraftConnector
		}{d, d, d}
	case 21:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.UserArticleConnector
			bbs.UserDraftConnector
		}{d, d, d, d}
	case 22:
		return struct {
			bbs.Connector
			bbs.WriteArticleConnector
			bbs.UserArticleConnector
			bbs.UserDraftConnector
		}{d, d, d, d}
	case 23:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.WriteArticleConnector
			bbs.UserArticleConnector
			bbs.UserDraftConnector
		}{d, d, d, d, d}
	case 24:
		return struct {
			bbs.Connector
			bbs.UserCommentConnector
			bbs.UserDraftConnector
		}{d, d, d}
	case 25:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.UserCommentConnector
			bbs.UserDraftConnector
		}{d, d, d, d}
	case 26:
		return struct {
			bbs.Connector
			bbs.WriteArticleConnector
			bbs.UserCommentConnector
			bbs.UserDraftConnector
		}{d, d, d, d}
	case 27:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.WriteArticleConnector
			bbs.UserCommentConnector
			bbs.UserDraftConnector
		}{d, d, d, d, d}
	case 28:
		return struct {
			bbs.Connector
			bbs.UserArticleConnector
			bbs.UserCommentConnector
			bbs.UserDraftConnector
		}{d, d, d, d}
	case 29:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.UserArticleConnector
			bbs.UserCommentConnector
			bbs.UserDraftConnector
		}{d, d, d, d, d}
	case 30:
		return struct {
			bbs.Connector
			bbs.WriteArticleConnector
			bbs.UserArticleConnector
			bbs.UserCommentConnector
			bbs.UserDraftConnector
		}{d, d, d, d, d}
	case 31:
		return struct {
			bbs.Connector
			bbs.WriteBoardConnector
			bbs.WriteArticleConnector
			bbs.UserArticleConnector
			bbs.UserCommentConnector
			bbs.UserDraftConnector
		}{d, d, d, d, d, d}
	}
	panic(mask)
}
